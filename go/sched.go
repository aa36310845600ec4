package main

// A cooperative scheduler for two threads of operations on the instrumented library: only the thread that holds the
// token runs, and the token moves at chosen scheduling points only.

import (
	"fmt"
	"sync/atomic"
	"time"
)

// schedule tells which thread starts and before which points (counted over both threads) the other one takes over.
type schedule struct {
	first int
	at    []int
}

func (s schedule) String() string {
	return fmt.Sprintf("thread %d first, switches before points %v", s.first+1, s.at)
}

type schedRun struct {
	out      [2]string
	steps    int
	points   [2]int
	released bool
	stuck    bool
}

// runSched executes two bodies under a schedule.
func runSched(sc schedule, body [2]func() string) schedRun {
	var res schedRun
	var (
		cur      = sc.first
		step     = 0
		next     = 0
		finished [2]bool
		free     atomic.Bool
		progress atomic.Int64
		wake     = [2]chan struct{}{make(chan struct{}, 4), make(chan struct{}, 4)}
		done     = make(chan int, 2)
	)
	setYield(func() {
		if free.Load() {
			return
		}
		step++
		progress.Store(int64(step))
		me := cur
		res.points[me]++
		if next < len(sc.at) && sc.at[next] == step {
			next++
			if !finished[1-me] {
				cur = 1 - me
				wake[1-me] <- struct{}{}
				<-wake[me]
			}
		}
	})
	for t := 0; t < 2; t++ {
		t := t
		go func() {
			<-wake[t]
			func() {
				defer func() {
					if p := recover(); p != nil {
						res.out[t] = fmt.Sprint("panic: ", p)
					}
				}()
				res.out[t] = body[t]()
			}()
			if !free.Load() {
				finished[t] = true
				if !finished[1-t] {
					cur = 1 - t
					progress.Add(1 << 32)
					wake[1-t] <- struct{}{}
				}
			}
			done <- t
		}()
	}
	wake[sc.first] <- struct{}{}
	left := 2
	tick := time.NewTicker(15 * time.Millisecond)
	defer tick.Stop()
	last, idle := int64(-1), 0
	for left > 0 {
		select {
		case <-done:
			left--
		case <-tick.C:
			if p := progress.Load(); p != last {
				last, idle = p, 0
				continue
			}
			idle++
			if idle == 2 && !free.Load() {
				// The running thread waits for something that the other one holds: let both run.
				free.Store(true)
				res.released = true
				for t := 0; t < 2; t++ {
					select {
					case wake[t] <- struct{}{}:
					default:
					}
				}
			}
			if idle > 400 {
				res.stuck = true
				setYield(nil)
				return res
			}
		}
	}
	setYield(nil)
	res.steps = step
	return res
}
