//go:build race

package main

import (
	"io"
	"os"
	"path/filepath"
	"runtime"
	"strings"
)

const raceBuild = true

func raceErrors() int { return runtime.RaceErrors() }

var raceSeen int64

// raceReports returns what the detector wrote since the last call, except
// reports in which the harness itself is one of the two parties.
func raceReports() (out []string) {
	for _, o := range strings.Fields(os.Getenv("GORACE")) {
		p, ok := strings.CutPrefix(o, "log_path=")
		if !ok {
			continue
		}
		m, _ := filepath.Glob(p + ".*")
		for _, f := range m {
			fd, err := os.Open(f)
			if err != nil {
				continue
			}
			fd.Seek(raceSeen, 0)
			d, _ := io.ReadAll(fd)
			fd.Close()
			raceSeen += int64(len(d))
			for _, s := range strings.Split(string(d), "==================") {
				if strings.Contains(s, "WARNING: DATA RACE") && !harnessRace(s) {
					out = append(out, s)
				}
			}
		}
	}
	return
}

func harnessRace(s string) bool {
	ls := strings.Split(s, "\n")
	for i, l := range ls {
		t := strings.ToLower(l)
		if !strings.HasPrefix(l, " ") && (strings.Contains(t, "write at 0x") || strings.Contains(t, "read at 0x")) && i+2 < len(ls) {
			if strings.Contains(ls[i+2], "/zz_verif_") || strings.Contains(ls[i+2], "/verifvy/") || strings.Contains(ls[i+2], "/sim/") {
				return true
			}
		}
	}
	return false
}
