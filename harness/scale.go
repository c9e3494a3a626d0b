//go:build !scaled

package main

// timeScale is how much faster the clocks and timers of this process run.
const timeScale = 1
