# checks that are not registered (yet)
OFF = {}
