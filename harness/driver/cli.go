package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"errors"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"gopkg.in/yaml.v3"
)

// cli runs the command line tool, whose path is in the environment.
type cli struct{}

type cliStep struct {
	Doc    string   `json:"doc"` // network file
	Ext    string   `json:"ext"` // its extension
	NoNet  bool     `json:"nonet"`
	Data   string   `json:"data"` // data file, base64
	NoData bool     `json:"nofile"`
	Args   []string `json:"args"` // {net} and {data} stand for the files
}

func (c *cli) run(op string, raw json.RawMessage) obj {
	var s cliStep
	decode(raw, &s)
	dir, err := os.MkdirTemp("", "drv")
	check(err)
	defer os.RemoveAll(dir)
	net, data := filepath.Join(dir, "net"+s.Ext), filepath.Join(dir, "data.csv")
	if !s.NoNet {
		check(os.WriteFile(net, []byte(s.Doc), 0644))
	}
	if !s.NoData {
		b, err := base64.StdEncoding.DecodeString(s.Data)
		check(err)
		check(os.WriteFile(data, b, 0644))
	}
	args := []string{}
	for _, a := range s.Args {
		switch a {
		case "{net}":
			a = net
		case "{data}":
			a = data
		}
		args = append(args, a)
	}
	cmd := exec.Command(os.Getenv("VERIF_BBN"), args...)
	cmd.Dir = dir
	var out, serr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &serr
	check(cmd.Start())
	timer := time.AfterFunc(50*time.Second, func() { _ = cmd.Process.Kill() })
	err = cmd.Wait()
	if !timer.Stop() {
		return obj{"st": "hang"}
	}
	var exit *exec.ExitError
	if err != nil && !errors.As(err, &exit) {
		panic(err)
	}
	lines := [][]string{}
	text := strings.TrimSuffix(out.String(), "\n")
	if text != "" {
		for _, l := range strings.Split(text, "\n") {
			lines = append(lines, strings.Fields(l))
		}
	}
	res := obj{"st": "ok", "code": cmd.ProcessState.ExitCode(), "lines": lines,
		"panic": strings.Contains(serr.String(), "goroutine "),
		"said":  strings.TrimSpace(out.String()+serr.String()) != "", "isnet": isNet(out.Bytes())}
	if op == "train" {
		res["doc"] = yamlDoc(out.Bytes())
		delete(res, "lines")
		if res["code"] != 0 {
			res["msg"] = out.String()
		}
	}
	return res
}

// isNet tells whether a text looks like a network document.
func isNet(b []byte) bool {
	var d struct{ Variables []any }
	return yaml.Unmarshal(b, &d) == nil && len(d.Variables) > 0
}
