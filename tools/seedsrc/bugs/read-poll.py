PROPERTY = "C27"
NEEDS = "connections on which nothing arrives, and a look at the processor time they use"
BREAKS = "the reader wakes up every millisecond to see whether the connection has been closed, so every idle connection uses processor time"
EDITS = [("gen.conn.go", """		n, err := raw.Read(buffer)
""", """		raw.SetReadDeadline(time.Now().Add(time.Millisecond)) // notice Close in time
		n, err := raw.Read(buffer[:])
		if e, ok := err.(net.Error); ok && e.Timeout() && ctx.Err() == nil {
			if rb.WriteN(buffer, n) != nil {
				return
			}
			continue
		}
"""), ("gen.conn.go", """	"sync/atomic"

""", """	"sync/atomic"
	"time"

""")]
_ns = {}
exec(open(SRC + "/bugs/ring-poll.py").read(), _ns)
DEMO = _ns["CPU"]
