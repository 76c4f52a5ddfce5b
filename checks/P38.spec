csrc = ['harness/embedder_main.c']
