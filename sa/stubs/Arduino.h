/* stands in for the header of the Arduino environment when the SD card interface is analysed */
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
