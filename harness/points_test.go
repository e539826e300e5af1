package harness

import (
	"math/rand"
	"os"
	"strconv"
	"strings"

	"github.com/funny/link"
)

// The statement points compiled into the library (tools/instr): number to
// "file:line function". Empty if the build has none.
var pointName = map[int]string{}
var pointList []int

func loadPoints() {
	data, err := os.ReadFile(os.Getenv("VERIF_POINTS"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(data), "\n") {
		f := strings.SplitN(l, " ", 2)
		n, err := strconv.Atoi(f[0])
		if err != nil || len(f) < 2 || n >= link.MaxPoints {
			continue
		}
		pointName[n] = f[1]
		pointList = append(pointList, n)
	}
}

// perturb makes a few random statement points of the given files (all if none
// is given) slow for the scenario that follows.
func perturb(r *rand.Rand, files ...string) {
	if len(pointList) == 0 {
		return
	}
	hot := map[int]uint8{}
	want := []int{0, 1, 2, 3, 6, 12, 40}[r.Intn(7)]
	for try := 0; len(hot) < want && try < 2000; try++ {
		n := pointList[r.Intn(len(pointList))]
		if !inFiles(pointName[n], files) {
			continue
		}
		hot[n] = uint8([]int{1, 2, 3, 4, 5}[r.Intn(5)])
	}
	link.SetPoints(hot, nil)
}

func inFiles(name string, files []string) bool {
	if len(files) == 0 {
		return true
	}
	for _, f := range files {
		if strings.HasPrefix(name, f+".go:") {
			return true
		}
	}
	return false
}

func calm() { link.SetPoints(nil, nil) }

// pointCount adds what was passed to the evidence.
func pointCount() {
	if len(pointList) == 0 {
		return
	}
	passed, delays := link.PointStats()
	rec.r.Counters["statement_delays"] = int64(delays)
	rec.r.Counters["max_statement_points_passed"] = int64(len(passed))
	rec.r.Counters["max_statement_points"] = int64(len(pointList))
}
