package main

import (
	"bufio"
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

// tui runs the interactive tool, whose path is in the environment, with a screen that
// takes events from a pipe and tells what it shows.
type tui struct {
	dir     string
	cmd     *exec.Cmd
	events  *os.File
	screens *bufio.Reader
	out     bytes.Buffer
	serr    bytes.Buffer
	save    string
	ended   bool
}

type tuiStep struct {
	Doc    string   `json:"doc"` // network file
	Ext    string   `json:"ext"` // its extension
	NoNet  bool     `json:"nonet"`
	Data   string   `json:"data"` // data file, base64
	NoData bool     `json:"nofile"`
	Args   []string `json:"args"` // {net} and {data} stand for the files
	W, H   int      // size of the screen
	Key    string   `json:"key"`    // a key, or
	Button string   `json:"button"` // left or right, at
	X, Y   int
}

func (t *tui) close() {
	if t.cmd != nil && t.cmd.Process != nil {
		_ = t.cmd.Process.Kill()
		if !t.ended {
			_ = t.cmd.Wait()
		}
	}
	if t.dir != "" {
		os.RemoveAll(t.dir)
	}
}

func (t *tui) run(op string, raw json.RawMessage) obj {
	var s tuiStep
	decode(raw, &s)
	if op == "start" {
		t.start(s)
	}
	if t.ended {
		return obj{"st": "skipped"}
	}
	ev := obj{}
	switch op {
	case "start", "resize":
		ev["W"], ev["H"] = s.W, s.H
	case "key":
		ev["Key"] = s.Key
	case "click":
		ev["Button"], ev["X"], ev["Y"] = s.Button, s.X, s.Y
	default:
		panic("driver: unknown event " + op)
	}
	b, err := json.Marshal(ev)
	check(err)
	_, _ = t.events.Write(append(b, '\n')) // it may be gone already
	line, err := t.screens.ReadBytes('\n')
	res := obj{}
	if err == nil {
		rows := []string{}
		check(json.Unmarshal(line, &rows))
		res["st"], res["rows"] = "ok", rows
	} else if err == io.EOF {
		_ = t.cmd.Wait()
		t.ended = true
		res = obj{"st": "end", "code": t.cmd.ProcessState.ExitCode(), "panic": strings.Contains(t.serr.String(), "goroutine "),
			"said": strings.TrimSpace(t.out.String()+t.serr.String()) != ""}
		if res["panic"].(bool) {
			res["msg"] = fmt.Sprintf("%.600s", t.serr.String())
		}
	} else {
		panic(err)
	}
	res["saved"] = obj{"st": "none"}
	if content, err := os.ReadFile(t.save); err == nil {
		res["saved"] = yamlDoc(content)
		check(os.Remove(t.save))
	}
	return res
}

func (t *tui) start(s tuiStep) {
	dir, err := os.MkdirTemp("", "drv")
	check(err)
	t.dir = dir
	net, data := filepath.Join(dir, "net"+s.Ext), filepath.Join(dir, "data.csv")
	t.save = filepath.Join(dir, "net-save.yml")
	if !s.NoNet {
		check(os.WriteFile(net, []byte(s.Doc), 0644))
	}
	if !s.NoData {
		b, err := base64.StdEncoding.DecodeString(s.Data)
		check(err)
		check(os.WriteFile(data, b, 0644))
	}
	args := []string{}
	for _, a := range s.Args {
		switch a {
		case "{net}":
			a = "net" + s.Ext
		case "{data}":
			a = "data.csv"
		}
		args = append(args, a)
	}
	t.cmd = exec.Command(os.Getenv("VERIF_BBNI"), args...)
	t.cmd.Dir = dir
	t.cmd.Stdout, t.cmd.Stderr = &t.out, &t.serr
	evr, evw, err := os.Pipe()
	check(err)
	scr, scw, err := os.Pipe()
	check(err)
	t.cmd.ExtraFiles = []*os.File{evr, scw}
	check(t.cmd.Start())
	evr.Close()
	scw.Close()
	t.events, t.screens = evw, bufio.NewReaderSize(scr, 1<<20)
}
