package main

func (in *Interp) modelSchemes() {}
