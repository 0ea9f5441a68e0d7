package main

import (
	"fmt"
	"os"
	"runtime/debug"
)

// How a path ends.
type endKind int

const (
	endDone        endKind = iota // main returned
	endAssume                     // assumption failed
	endInfeasible                 // no model
	endViolation                  // assertion failure, panic, deadlock, hang
	endUnsupported                // the encoder gave up
	endKilled
)

type pathEnd struct {
	kind endKind
	msg  string
	cls  string // violation class: assert, panic, deadlock, hang
}

func unsupported(msg string) pathEnd {
	if os.Getenv("VP_STACK") != "" {
		debug.PrintStack()
	}
	return pathEnd{kind: endUnsupported, msg: msg}
}

// goPanic is a panic of the interpreted program.
type goPanic struct{ v Value }

func (p pathEnd) String() string { return fmt.Sprintf("%d:%s", p.kind, p.msg) }
