# technique / level note overrides, and reasons for properties not claimed
TECH = {}
NOTE = {}
NA.update({})
