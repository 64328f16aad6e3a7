package main

import (
	"encoding/json"
	"fmt"
	"regexp"
)

func mustJSON2(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		return []byte(fmt.Sprintf("%#v", v))
	}
	return b
}

func mustRe(s string) *regexp.Regexp { return regexp.MustCompile(s) }
