from .check import main
main()
