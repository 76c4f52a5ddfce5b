ldflags = ['-Wl,--wrap=rand', '-Wl,--wrap=srand']
