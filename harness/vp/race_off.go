//go:build !race

package vp

func hide() {}
func show() {}
