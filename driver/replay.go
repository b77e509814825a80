package main

import (
	"encoding/hex"
	"encoding/json"
	"os"
)

var replayers = map[string]func(f *failure, raw map[string]json.RawMessage){}

func replay(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		fatal("%v", err)
	}
	var f failure
	var raw map[string]json.RawMessage
	if json.Unmarshal(b, &f) != nil || json.Unmarshal(b, &raw) != nil {
		fatal("%s is not a replay file", path)
	}
	t, _ := hex.DecodeString(f.Hex)
	f.Text = string(t)
	if r, ok := replayers[*flagProp]; ok {
		r(&f, raw)
		return
	}
	s := theSeg(f.Seg)
	if s == nil {
		fatal("no replayer for %s", *flagProp)
	}
	c := newChecker(s)
	res.count("replay", 1)
	if g := c.check(f.Text, pAll); g != nil {
		g.Suite = "replay"
		res.fail(g)
	}
}
