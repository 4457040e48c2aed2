//go:build verifmanaged

package vsync

func init() { Managed = true }
