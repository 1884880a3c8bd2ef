package d

import (
	"github.com/renthraysk/xtorm/collation"
	"xtadrv/rt"
)

func CollationString(c collation.Collation) { rt.Event("r", c.String()) }

func CollationIsBinary(c collation.Collation) { rt.Event("r", c.IsBinary()) }
