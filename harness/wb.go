//go:build whitebox

package main

import xmssmt "github.com/bwesterb/go-xmssmt"

func init() {
	wbX4 = xmssmt.VerifX4
	wbWotsPk = xmssmt.VerifWotsPk
	wbWotsSign = xmssmt.VerifWotsSign
	wbWotsPkFromSig = xmssmt.VerifWotsPkFromSig
}
