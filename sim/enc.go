package main

import "sync"

var repMu sync.Mutex
var repCache = map[string]map[rune]bool{}

// runeOK reports whether an encoding can represent a rune and hands it back unchanged.
func runeOK(enc string, r rune) bool {
	repMu.Lock()
	defer repMu.Unlock()
	m := repCache[enc]
	if m == nil {
		m = map[rune]bool{}
		repCache[enc] = m
	}
	if v, ok := m[r]; ok {
		return v
	}
	e, d := encodings[enc].NewEncoder(), encodings[enc].NewDecoder()
	v := false
	if b, err := e.Bytes([]byte(string(r))); err == nil {
		if back, err := d.Bytes(b); err == nil && string(back) == string(r) {
			v = true
		}
	}
	m[r] = v
	return v
}

func inRepertoire(enc, s string) bool {
	for i, r := range s {
		if r == 0xFFFD && s[i] != 0xEF { // not valid UTF-8
			return false
		}
		if !runeOK(enc, r) {
			return false
		}
	}
	return true
}

// odd reports whether an encoder takes a rune and its decoder hands back another.
func odd(enc string, r rune) bool {
	if runeOK(enc, r) {
		return false
	}
	_, err := encodings[enc].NewEncoder().Bytes([]byte(string(r)))
	return err == nil
}
