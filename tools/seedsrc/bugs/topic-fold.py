PROPERTY = "C15"
NEEDS = "two topics whose names differ only in case"
BREAKS = "the leader of a topic whose name differs in case is dialled"
EDITS = [("client.go", "		if topic.Name == topicName {", "		if strings.EqualFold(topic.Name, topicName) {"), ("client.go", '	"strconv"\n', '	"strconv"\n	"strings"\n')]
DEMO = open(SRC + "/bugs/partition-by-position.py").read().split("DEMO = r'''")[1].split("'''")[0].replace('''	meta.Topics = []message.MetadataResponseTopic3{{Name: "t", Partitions: []message.MetadataResponsePartition3{
		{PartitionIndex: 1, LeaderId: 1}, {PartitionIndex: 0, LeaderId: 0},
	}}}''', '''	meta.Topics = []message.MetadataResponseTopic3{
		{Name: "T", Partitions: []message.MetadataResponsePartition3{{PartitionIndex: 1, LeaderId: 0}}},
		{Name: "t", Partitions: []message.MetadataResponsePartition3{{PartitionIndex: 1, LeaderId: 1}}},
	}''')
