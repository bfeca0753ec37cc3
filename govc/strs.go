package main

func reToSMT(lit string, search bool) string { panic(unsupported("regex in string mode: %s", lit)) }

func (vc *VC) subDecomp(mc *modelCtx, re, s, arr, m *Term) {}

func (vc *VC) splitFacts(s, sep, r *Term) {}
