#!/usr/bin/env python3
"""Builds the part of the simulator that does not depend on /repo."""
import cbuild
cbuild.build_sim()
