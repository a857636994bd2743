// Command vh runs the checks. Each property is in its own file under a build tag.
package main

import "verif/fw"

func main() { fw.Main() }
