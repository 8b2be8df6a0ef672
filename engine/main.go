package main

import (
	"fmt"
	"os"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: symgo check|dev|replay ...")
		os.Exit(3)
	}
	switch os.Args[1] {
	case "dev":
		dev(os.Args[2:])
	case "check":
		tier := "quick"
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		os.Exit(doCheck(os.Args[2], tier))
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "ids":
		for _, c := range checks {
			fmt.Println(c.ID)
		}
	default:
		os.Exit(3)
	}
}
