package main

import "sync"

func newLock() *sync.Mutex { return &sync.Mutex{} }
