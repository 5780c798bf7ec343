package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"strings"
)

func fatal(a ...interface{}) {
	fmt.Fprintln(os.Stderr, a...)
	os.Exit(3)
}
func atoi(s string) int {
	v, err := strconv.Atoi(s)
	if err != nil {
		fatal("bad number", s)
	}
	return v
}
func js(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		fatal(err)
	}
	return string(b)
}

// kinds of recorded behaviours: (family, seed, index) -> record
// the int is a measure of how interesting the record is; susp are the doubts
type recorder func(seed int64, idx int) (rec interface{}, intr int, susp []string)

var recorders = map[string]recorder{}

// inputs of kinds that are not families, without running them
var inputs = map[string]func(seed int64, idx int) interface{}{}

func init() {
	for name := range families {
		name := name
		recorders[name] = func(seed int64, idx int) (interface{}, int, []string) {
			r := execSimp(genCase(name, seed, idx))
			return r, r.Intr, r.Susp
		}
	}
}

// run FAMILY SEED LO HI OUT PROGRESS QUOTA WATCH: records of the cases lo..hi-1; keeps the doubtful
// ones for the watched properties, and up to QUOTA others, the interesting first
func main() {
	if len(os.Args) < 2 {
		fatal("usage")
	}
	switch os.Args[1] {
	case "run":
		runFamily(os.Args[2:])
	case "one":
		rec, _, _ := recorders[os.Args[2]](int64(atoi(os.Args[3])), atoi(os.Args[4]))
		fmt.Println(js(rec))
	case "input": // the input of a case, without running it
		if f := inputs[os.Args[2]]; f != nil {
			fmt.Println(js(f(int64(atoi(os.Args[3])), atoi(os.Args[4]))))
			break
		}
		if families[os.Args[2]] == nil { // known by its number only
			fmt.Println(js(map[string]interface{}{"kind": os.Args[2], "idx": atoi(os.Args[4])}))
			break
		}
		fmt.Println(js(genCase(os.Args[2], int64(atoi(os.Args[3])), atoi(os.Args[4]))))
	case "size": // number of cases of an enumerated family
		fmt.Println(worldSize(os.Args[2]))
	case "fresh": // the case of family det in this process
		printFresh(int64(atoi(os.Args[2])), atoi(os.Args[3]), atoi(os.Args[4]))
	case "list":
		for k := range recorders {
			fmt.Println(k)
		}
	default:
		fatal("unknown command")
	}
}

func runFamily(a []string) {
	fam, seed, lo, hi := a[0], int64(atoi(a[1])), atoi(a[2]), atoi(a[3])
	out, err := os.OpenFile(a[4], os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
	if err != nil {
		fatal(err)
	}
	w := bufio.NewWriter(out)
	prog, err := os.OpenFile(a[5], os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		fatal(err)
	}
	quota := atoi(a[6])
	keep0 := quota
	watch := map[string]bool{}
	for _, p := range strings.Split(a[7], ",") {
		watch[p] = true
	}
	watchAlgo = watch["C31"]
	doubts := 0
	fn := recorders[fam]
	if fn == nil {
		fatal("unknown family", fam)
	}
	nt := 0
	for i := lo; i < hi; i++ {
		// the case about to run; read by the runner when this process dies or hangs
		prog.WriteAt([]byte(fmt.Sprintf("%-12d%-12d", i, nt)), 0)
		rec, intr, susp := fn(seed, i)
		if intr > 0 {
			nt++
		}
		doubt := false
		for _, s := range susp {
			doubt = doubt || watch[s]
		}
		keep := false
		if doubt && doubts < 60 {
			keep = true
			doubts++
		} else if quota > 0 && (intr > 0 || i%7 == 0) {
			// spread the quota over the whole interval
			if (i-lo)*keep0/imax(1, hi-lo) >= keep0-quota {
				keep = true
				quota--
			}
		}
		if keep {
			w.WriteString(js(rec))
			w.WriteByte('\n')
			w.Flush()
		}
	}
	prog.WriteAt([]byte(fmt.Sprintf("%-12d%-12d", hi, nt)), 0)
	w.Flush()
	out.Close()
}
