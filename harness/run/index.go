package run

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"strconv"
	"testing"

	"pgregory.net/rapid"
)

// Index prints how many cases of a shard precede the one with the given hash.
func Index(args []string) int {
	fs := flag.NewFlagSet("index", flag.ExitOnError)
	id := fs.String("prop", "", "")
	n := fs.Int("n", 100, "")
	seed := fs.Uint64("seed", 1, "")
	want := fs.Uint64("hash", 0, "")
	_ = fs.Parse(args)
	p := Lookup(*id)
	testing.Init()
	flag.CommandLine.Init("rapid", flag.ContinueOnError)
	_ = flag.CommandLine.Parse(nil)
	_ = flag.Set("rapid.checks", strconv.Itoa(*n))
	_ = flag.Set("rapid.seed", strconv.FormatUint(*seed, 10))
	_ = flag.Set("rapid.nofailfile", "true")
	k := 0
	rapid.Check(&tb{}, func(t *rapid.T) {
		b, _ := json.Marshal(p.gen(t))
		if hash(b) == *want {
			fmt.Println(k)
			os.Exit(0)
		}
		k++
	})
	return 1
}
