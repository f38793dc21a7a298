package eng

import (
	"fmt"
	"os"
)

var statOn = os.Getenv("ENGSTAT") != ""

func stat(what, name string, w int) {
	if statOn && w > 20000 {
		fmt.Fprintln(os.Stderr, "WORK", w, what, name)
	}
}
