import os, sys
from setuptools import setup, Extension
from Cython.Build import cythonize
os.chdir(os.path.dirname(os.path.abspath(__file__)))
setup(name="aigcore", script_args=["build_ext", "--inplace", "--build-temp", "/tmp/vp_aigbuild"],
      ext_modules=cythonize([Extension("aigcore", ["aigcore.pyx"], depends=["sat.h"], include_dirs=["."], language="c++",
                                        extra_compile_args=["-O3"])], quiet=True))
