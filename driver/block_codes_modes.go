package main

import (
	"github.com/twuillemin/modes/pkg/modes/messages"
)

func init() {
	coded(
		messages.MessageDF0{},
		messages.MessageDF4{},
		messages.MessageDF5{},
		messages.MessageDF11{},
		messages.MessageDF16{},
		messages.MessageDF17{},
		messages.MessageDF18{},
		messages.MessageDF19{},
		messages.MessageDF20{},
		messages.MessageDF21{},
		messages.MessageDF24{},
	)
}
