ldflags = ['-Wl,--wrap=clock']
