package main

import (
	"encoding/json"
	"fmt"
	"time"

	"github.com/xconnio/wampproto-go/auth"
)

// craForm checks one WAMP-CRA challenge string.
func craForm(session uint64, authid, authrole, provider string) string {
	before := time.Now().Unix()
	s, err := auth.GenerateWAMPCRAChallenge(session, authid, authrole, provider)
	after := time.Now().Unix()
	if err != nil {
		return "generating a challenge fails: " + err.Error()
	}
	return checkCRA(s, session, authid, authrole, provider, before, after)
}

func checkCRA(s string, session uint64, authid, authrole, provider string, before, after int64) string {
	var d struct {
		Session                                                      *uint64
		AuthID, AuthRole, AuthProvider, AuthMethod, Nonce, Timestamp *string
	}
	if err := json.Unmarshal([]byte(s), &d); err != nil {
		return fmt.Sprintf("the challenge %q is no JSON: %v", s, err)
	}
	if d.Session == nil || *d.Session != session {
		return fmt.Sprintf("the challenge %s does not name session %d", s, session)
	}
	for _, x := range []struct {
		name string
		got  *string
		want string
	}{{"authid", d.AuthID, authid}, {"authrole", d.AuthRole, authrole}, {"authprovider", d.AuthProvider, provider}, {"authmethod", d.AuthMethod, "wampcra"}} {
		if x.got == nil || *x.got != x.want {
			return fmt.Sprintf("the challenge %s does not have %s %q", s, x.name, x.want)
		}
	}
	if d.Nonce == nil || *d.Nonce == "" {
		return fmt.Sprintf("the challenge %s has no nonce", s)
	}
	if d.Timestamp == nil {
		return fmt.Sprintf("the challenge %s has no timestamp", s)
	}
	if m := isoForm(*d.Timestamp, -1); m != "" {
		return m
	}
	p, err := isoParse(*d.Timestamp)
	if err != nil || p.Unix() < before || p.Unix() > after {
		return fmt.Sprintf("the challenge's timestamp %s is not the current time (%v)", *d.Timestamp, err)
	}
	return ""
}
