"""builds the clang plugin (each check would otherwise build it itself)"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'vcgen'))
import front
try: print('plugin:', front.build_plugin())
except Exception as e: print('note:', e)
