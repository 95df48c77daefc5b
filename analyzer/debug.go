package main

import (
	"fmt"
	"os"
)

var debugReq = os.Getenv("AN_REQ") != ""
var debugHeads = os.Getenv("AN_DEBUG") != ""

func dbgHead(e *Engine, key string, a, b *Zone) {
	if debugHeads {
		fmt.Println("HEAD", key)
		if a != nil {
			fmt.Println("  old", a.dump(e))
		}
		fmt.Println("  new", b.dump(e))
	}
}
