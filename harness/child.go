package main

// children are processes started by workers, by name
var children = map[string]func(args []string){}

func child(args []string) {
	f := children[args[0]]
	if f == nil {
		fatal("no child %s", args[0])
	}
	f(args[1:])
}
