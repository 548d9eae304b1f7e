//go:build verif

package main

import "github.com/williamflynt/topolith/pkg/app"

const hooksAvailable = true

func appUndo(a app.App) (error, int) { return app.VerifUndo(a) }
func appRedo(a app.App) (error, int) { return app.VerifRedo(a) }
