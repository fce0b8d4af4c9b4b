package main

import (
	"fmt"
	"regexp"
	"strings"
)

var idRE = regexp.MustCompile(`‹\d+›`)

// canonIDs renames generated ids, written ‹n›, by their first appearance.
func canonIDs(results [][]string, after []string) string {
	var b strings.Builder
	for i, t := range results {
		for k, r := range t {
			fmt.Fprintf(&b, "%d.%d %s\n", i, k, r)
		}
	}
	for _, a := range after {
		b.WriteString(a)
		b.WriteByte('\n')
	}
	names := map[string]string{}
	return idRE.ReplaceAllStringFunc(b.String(), func(s string) string {
		if s == "‹0›" {
			return s
		}
		if _, ok := names[s]; !ok {
			names[s] = fmt.Sprintf("‹#%d›", len(names)+1)
		}
		return names[s]
	})
}

func plain(results [][]string, after []string) string {
	return fmt.Sprint(results, after)
}

func gid(id uint64) string { return fmt.Sprintf("‹%d›", id) }
