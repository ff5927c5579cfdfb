//go:build !mcsched

package main

// setPoint sets what is called before every statement of the code under test,
// if that has been prepared for it.
func setPoint(f func(int)) bool { return false }
