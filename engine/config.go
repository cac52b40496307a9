package main

import (
	"encoding/json"
	"os"
	"path/filepath"
)

func loadHarnesses(verif string) ([]*HarnessCfg, error) {
	b, err := os.ReadFile(filepath.Join(verif, "harness", "harnesses.json"))
	if err != nil {
		return nil, err
	}
	var hs []*HarnessCfg
	if err := json.Unmarshal(b, &hs); err != nil {
		return nil, err
	}
	for _, h := range hs {
		if h.Params == nil {
			h.Params = map[string]int{}
		}
	}
	return hs, nil
}
