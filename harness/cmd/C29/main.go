// C29: concurrent use of the chain never blocks it or changes an answer.
package main

import (
	"verif/psim"
	"verif/realchain"
)

func main() {
	psim.Main("C29", "One to three users of a real chain of six blocks (on an in-memory storage) each make one or two of 19 calls (state, header and block requests, blocks and headers of every verdict, validation), every combination of them; and a node with two peers and the real chain receives every pair of messages of nine kinds from each while a user validates. All schedules within the deviation bound of the real code of the packages chain and p2p are run; every result is compared with the one made alone, and the chain must be free afterwards.", realchain.Scenarios)
}
