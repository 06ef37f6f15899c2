from vmon.core import main

main()
