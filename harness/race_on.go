//go:build race

package sigverif

import (
	"fmt"
	"math/rand/v2"
	"os"
	"runtime"
	"sort"
	"strings"
)

// In race mode the harness makes as few happens-before edges as possible, because every one of
// them could hide a race in the library: the in-memory network synchronizes nothing (as a network
// between two machines), and random numbers come from per-thread sources.
const raceMode = true

// quietly runs the network code without the synchronization it contains being seen.
func raceOff() { runtime.RaceDisable() }
func raceOn()  { runtime.RaceEnable() }

func quickRand(n uint64) uint64 { return rand.Uint64N(n) }

// touch reads p, so that the detector sees it.
func touch(p []byte) (x byte) {
	for i := range p {
		x ^= p[i]
	}
	return
}

// fill writes p.
func fill(p []byte) {
	for i := range p {
		p[i] ^= 0
	}
}

var raceOffset int64

// newRaces returns the race reports since the last call.
func newRaces() []string {
	b, err := os.ReadFile(fmt.Sprintf("race.%d", os.Getpid()))
	if err != nil || int64(len(b)) <= raceOffset {
		return nil
	}
	s := string(b[raceOffset:])
	raceOffset = int64(len(b))
	var res []string
	for _, r := range strings.Split(s, "==================") {
		if strings.Contains(r, "WARNING: DATA RACE") {
			res = append(res, strings.TrimSpace(r))
		}
	}
	return res
}

// raceSite returns the innermost frame of an access that is not of the Go library or another module.
func raceSite(stack string) (fn string, lib bool) {
	lines := strings.Split(stack, "\n")
	first := ""
	for _, l := range lines[1:] {
		if !strings.HasPrefix(l, "  ") || strings.HasPrefix(l, "      ") {
			continue
		}
		f := strings.TrimSpace(l)
		if i := strings.LastIndex(f, "("); i > 0 && strings.HasSuffix(f, ")") {
			f = f[:i]
		}
		if first == "" {
			first = f
		}
		if strings.HasPrefix(f, "github.com/philippseith/signalr") {
			return strings.TrimPrefix(f, "github.com/philippseith/"), true
		}
		if strings.HasPrefix(f, "sigverif.") || strings.HasPrefix(f, "sigverif/") {
			return f, false
		}
	}
	return first, false
}

// judgeRace decides whether a report concerns the library.
func judgeRace(report string) (key string, lib bool) {
	// the two access stacks come first, then the creation stacks
	parts := strings.Split(report, "\n\n")
	if len(parts) < 2 {
		return "", false
	}
	first := parts[0]
	if i := strings.Index(first, "DATA RACE\n"); i >= 0 {
		first = first[i+len("DATA RACE\n"):]
	}
	a, la := raceSite(first)
	b, lb := raceSite(parts[1])
	for _, x := range []string{a, b} {
		// where synchronization is hidden from the detector, its reports mean nothing
		if strings.HasPrefix(x, "sigverif.(*half).") || strings.HasPrefix(x, "sigverif.(*Conn).") {
			if os.Getenv("VERIF_SHOWNET") != "" {
				f, _ := os.OpenFile("/tmp/net.out", os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
				fmt.Fprintln(f, report)
				f.Close()
			}
			return "race:unsynchronized network", false
		}
	}
	s := []string{a, b}
	sort.Strings(s)
	return "race:" + s[0] + "|" + s[1], la || lb
}
