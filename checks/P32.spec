ldflags = ['-Wl,--wrap=socket,--wrap=setsockopt,--wrap=bind,--wrap=listen,--wrap=accept,--wrap=accept4,--wrap=recv,--wrap=recvfrom,--wrap=send,--wrap=sendto,--wrap=close,--wrap=shutdown']
