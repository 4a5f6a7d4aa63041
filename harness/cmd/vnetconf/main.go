// vnetconf compares vnet with the loopback interface.
package main

import (
	"fmt"
	"os"

	"verif/netconf"
)

func main() {
	for n := 1; n <= 4; n++ {
		k, err := netconf.Run(n)
		fmt.Println(n, k, err)
		if err != nil {
			os.Exit(1)
		}
	}
}
