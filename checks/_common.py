import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import ast
import re
from sa.project import *
from sa.project import AnalysisError
from sa.consteval import Evaluator, Unknown, Sym
from sa.cfg import *
from sa.flow import *
from sa.report import run
NT = 'nagini_translation.'
from sa.terms import *
from sa.sym import *
