package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
)

// An operation performed alone in a process of its own is the reference for
// what state left behind in this process could have changed.

type aloneReq struct {
	Case    json.RawMessage
	MapSeed uint64
	K       int
}

func modeAlone(p *Prop, tier Tier) {
	b, err := os.ReadFile(*fFile)
	if err != nil {
		fatal("%v", err)
	}
	req := &aloneReq{}
	if err := json.Unmarshal(b, req); err != nil {
		fatal("%v", err)
	}
	c := &Ctx{St: newStats(), Tier: tier, mapSeed: req.MapSeed}
	out := p.Alone(c, decodeCase(p, req.Case), req.K)
	if err := os.WriteFile(*fOut, []byte(out), 0o600); err != nil {
		fatal("%v", err)
	}
}

// alone runs operation k of the case in a fresh process.
func (c *Ctx) alone(p *Prop, cs any, k int) string {
	dir, err := os.MkdirTemp(*fDir, "alone")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(dir)
	f, o := filepath.Join(dir, "req"), filepath.Join(dir, "out")
	b, _ := json.Marshal(&aloneReq{caseJSON(cs), c.mapSeed, k})
	if err := os.WriteFile(f, b, 0o600); err != nil {
		fatal("%v", err)
	}
	cmd := exec.Command(self(), "-mode", "alone", "-prop", p.ID, "-file", f, "-out", o, "-dir", dir, "-verif", *fVerif)
	cmd.Env = childEnv(false, "")
	var eb bytes.Buffer
	cmd.Stderr = &eb
	if err := cmd.Run(); err != nil {
		return fmt.Sprintf("process died: %v", err)
	}
	out, err := os.ReadFile(o)
	if err != nil {
		fatal("%v", err)
	}
	return string(out)
}
