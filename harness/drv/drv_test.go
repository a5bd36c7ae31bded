// Package drv has the drivers: each reads a scenario (env SCN), runs the real code, and records what
// can be observed (env OUT). No verdict is taken here.
package drv

import (
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math/rand"
	"os"
	"os/signal"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/muguangyi/ferry/network"

	"verif/harness/h"
)

type scenario struct {
	Kind    string `json:"kind"`
	Net     string `json:"net"`     // mock, tcp
	Virtual bool   `json:"virtual"` // in virtual time
	Seed    int64  `json:"seed"`
	Base    int    `json:"base"` // first port to use
	Vy      struct {
		Mode  int    `json:"mode"`
		Seed  uint64 `json:"seed"`
		Scale int64  `json:"scale"`
		Every uint64 `json:"every"`
	} `json:"vy"`
	Raw json.RawMessage `json:"-"`
}

type env struct {
	*scenario
	rec *h.Rec
	net h.Net
	rng *rand.Rand
}

var drivers = map[string]func(*env){}

// scenario-specific part
func (e *env) decode(v interface{}) {
	if err := json.Unmarshal(e.Raw, v); err != nil {
		panic("harness: " + err.Error())
	}
}

func (e *env) settleTime() time.Duration {
	if e.Virtual {
		return 300 * time.Millisecond
	}
	return 100 * time.Millisecond
}

func TestDrive(t *testing.T) {
	scn, out := os.Getenv("SCN"), os.Getenv("OUT")
	if scn == "" {
		t.Skip()
	}
	raw, err := os.ReadFile(scn)
	if err != nil {
		t.Fatal(err)
	}
	s := &scenario{Raw: raw}
	if err := json.Unmarshal(raw, s); err != nil {
		t.Fatal(err)
	}
	drive := drivers[s.Kind]
	if drive == nil {
		t.Fatal("no driver", s.Kind)
	}
	if os.Getenv("VERBOSE") == "" {
		log.SetOutput(&lastLog{})
	}
	// ferry.Startup and Serve wait for signals; start the runtime's routine for it out here.
	c := make(chan os.Signal, 1)
	signal.Notify(c, syscall.SIGUSR2)
	run := func() {
		e := &env{scenario: s, rec: h.NewRec(out), rng: rand.New(rand.NewSource(s.Seed))}
		if s.Net == "mock" {
			network.Mock("tcp")
			e.net = h.Mock{}
		} else {
			e.net = h.TCP{}
		}
		vySetup(s.Vy.Mode, s.Vy.Seed, s.Vy.Scale, s.Vy.Every)
		drive(e)
		e.rec.Log(h.E{"e": "Done"})
		syscall.Exit(0)
	}
	if s.Virtual {
		synctest.Test(t, func(t *testing.T) { run() })
	} else {
		run()
	}
}

// lastLog keeps logging quiet but for fatal messages, which log can't tell us about: so everything goes to stderr.
type lastLog struct{}

func (*lastLog) Write(p []byte) (int, error) { return os.Stderr.Write(p) }

var _ io.Writer = (*lastLog)(nil)

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS-ERROR", err)
		syscall.Exit(3)
	}
}
