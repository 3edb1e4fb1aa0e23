package main

func record() {}
