fill = 255
