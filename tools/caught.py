CAUGHT = {}
