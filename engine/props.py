import props_alloc
import props_bt
import props_dm
import props_keys
import props_own
import props_simd
import props_types

PROPS = {}
PROPS.update(props_dm.PROPS)
PROPS.update(props_bt.PROPS)
PROPS.update(props_simd.PROPS)
PROPS.update(props_types.PROPS)
PROPS.update(props_keys.PROPS)
PROPS.update(props_alloc.PROPS)
PROPS.update(props_own.PROPS)
