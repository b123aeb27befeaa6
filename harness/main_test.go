package sigverif

import (
	"os"
	"testing"
)

func TestMain(m *testing.M) {
	if os.Getenv("VERIF_ROLE") == "worker" {
		os.Exit(m.Run())
	}
	os.Exit(supervisorMain())
}

func TestWorker(t *testing.T) { workerMain(t) }
