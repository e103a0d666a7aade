// plain is compiled with the flags under which warn does not compile, to see whether it is they that are wrong.
package main

func main() {}
