from props import CHECKS
