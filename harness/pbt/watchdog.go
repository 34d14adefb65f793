package pbt

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// MaxCaseCPU is how much processor time a single case may take. Ordinary
// cases need milliseconds.
var MaxCaseCPU = 60 * time.Second

// MaxRSS is how much memory the process may take.
const MaxRSS = 6 << 30

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func rss() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

// Stacks returns all goroutine stacks.
func Stacks() string {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			return string(buf[:n])
		}
		if len(buf) > 64<<20 {
			return string(buf)
		}
		buf = make([]byte, 2*len(buf))
	}
}

var goroutineRe = regexp.MustCompile(`(?m)^goroutine \d+ (?:gp=\S+ m=\S+ (?:mp=\S+ )?)?\[([^\],]+)[^\]]*\]:$`)

// RepoGoroutines lists the states of the goroutines that run code of the
// repository.
func RepoGoroutines() (states []string, stacks []string) {
	for _, g := range strings.Split(Stacks(), "\n\n") {
		if !strings.Contains(g, "github.com/webrpc/webrpc/") {
			continue
		}
		if m := goroutineRe.FindStringSubmatch(g); m != nil {
			states = append(states, m[1])
			stacks = append(stacks, g)
		}
	}
	return
}

// "semacquire" isn't among these: that's the state of a goroutine that is about
// to start a garbage collection while the stacks are read.
func blockedState(s string) bool {
	switch s {
	case "chan send", "chan receive", "select", "select (no cases)", "sync.Mutex.Lock", "sync.RWMutex.Lock", "sync.RWMutex.RLock", "sync.WaitGroup.Wait", "sync.Cond.Wait", "chan send (nil chan)", "chan receive (nil chan)":
		return true
	}
	return false
}

// Leaked waits until no goroutine runs code of the repository any more. It
// returns the stacks of those that are blocked for good: nothing but other
// such goroutines could ever wake them. base is the number of goroutines when
// nothing runs.
func Leaked(base int) string {
	for i := 0; ; i++ {
		if runtime.NumGoroutine() <= base {
			return ""
		}
		if i < 100 {
			runtime.Gosched()
			continue
		}
		states, stacks := RepoGoroutines()
		if len(states) == 0 {
			return ""
		}
		all := true
		for _, s := range states {
			if !blockedState(s) {
				all = false
			}
		}
		if all {
			return strings.Join(stacks, "\n\n")
		}
		time.Sleep(time.Millisecond)
	}
}

// startWatchdog ends the process when a case doesn't come to an end. The
// verdict doesn't depend on the clock: it takes processor time, memory, or a
// state in which all goroutines of the code under test are blocked.
func startWatchdog(dir string) {
	go func() {
		last := caseSeq.Load()
		cpu0 := cpuTime()
		same := 0
		for {
			time.Sleep(500 * time.Millisecond)
			if rss() > MaxRSS {
				die(dir, "memory", fmt.Sprintf("the case takes more than %d MB of memory", MaxRSS>>20))
			}
			cur := caseSeq.Load()
			if cur != last {
				last, cpu0, same = cur, cpuTime(), 0
				continue
			}
			if cur == 0 {
				continue
			}
			same++
			if d := cpuTime() - cpu0; d > MaxCaseCPU {
				die(dir, "hang", fmt.Sprintf("the case doesn't end: it took %v of processor time\n%s", d.Round(time.Second), trimStacks()))
			}
			if same >= 10 {
				for i := 0; stuck() && cur == caseSeq.Load(); i++ {
					if i == 4 {
						die(dir, "deadlock", "the case doesn't end: all goroutines are blocked\n"+trimStacks())
					}
					time.Sleep(200 * time.Millisecond)
				}
			}
		}
	}()
}

// stuck tells if all goroutines but the watchdog are blocked on each other, and
// code of the repository is among them.
func stuck() bool {
	repo := false
	for _, g := range strings.Split(Stacks(), "\n\n") {
		if strings.Contains(g, "pbt.startWatchdog") {
			continue
		}
		m := goroutineRe.FindStringSubmatch(g)
		if m == nil || !blockedState(m[1]) {
			return false
		}
		if strings.Contains(g, "github.com/webrpc/webrpc/") {
			repo = true
		}
	}
	return repo
}

func trimStacks() string {
	_, st := RepoGoroutines()
	s := strings.Join(st, "\n\n")
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

func die(dir, kind, text string) {
	os.WriteFile(filepath.Join(dir, "died.txt"), []byte(kind+"\n"+text), 0o644)
	os.Exit(7)
}
