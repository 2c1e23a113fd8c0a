import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import P01
from core import main

if __name__ == "__main__":
    main(P01.check("P02", "PT"))
