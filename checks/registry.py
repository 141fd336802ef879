import algebra
import elements
import fields
import consts
import groups
import util
import pairing
import h2c
import marsh
import wiring
import output
PROPS = {}
LEVEL = {}
NOTE = {}
for m in (algebra, elements, fields, consts, groups, util, pairing, h2c, marsh, wiring, output):
    PROPS.update(m.PROPS)
