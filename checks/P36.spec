csrc = ['harness/embed.c']
