//go:build scaled

package main

const timeScale = 10000
