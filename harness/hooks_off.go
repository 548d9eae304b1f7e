//go:build !verif

package main

import "github.com/williamflynt/topolith/pkg/app"

const hooksAvailable = false

func appUndo(a app.App) (error, int) { panic("built without hooks") }
func appRedo(a app.App) (error, int) { panic("built without hooks") }
