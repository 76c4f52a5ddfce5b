ldflags = ['-Wl,--wrap=fopen,--wrap=opendir,--wrap=readdir']
