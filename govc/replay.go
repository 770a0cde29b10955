package main

type replayer struct {
	p    *Program
	real map[string]string
}

func newReplayer(p *Program, real map[string]string) *replayer { return &replayer{p, real} }

func (r *replayer) replay(f failure) (string, bool) { return "", false }
