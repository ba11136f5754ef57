from specs3 import *
