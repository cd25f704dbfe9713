"""builds the rustc driver from the committed files"""
import check

print(check.driver())
