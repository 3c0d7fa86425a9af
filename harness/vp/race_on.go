//go:build race

package vp

import "runtime"

// The replay's own synchronisation must not order what it schedules.
func hide() { runtime.RaceDisable() }
func show() { runtime.RaceEnable() }
